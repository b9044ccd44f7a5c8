#include "sym.h"
#include <boost/program_options.hpp>
namespace po = boost::program_options;
HARNESS(h_t0) {
  po::options_description d("x");
  d.add_options()("foo,f", po::value<std::string>(), "help")("bar,b", "b");
  std::vector<std::string> args;
  int n = 1 + sym::choice(2, "n");
  for (int i = 0; i < n; ++i) args.push_back(sym::str_upto(0, 4, "tok", "-=fob"));
  try {
    po::parsed_options p = po::command_line_parser(args).options(d).run();
    std::vector<std::string> all;
    for (auto& o : p.options) for (auto& t : o.original_tokens) all.push_back(t);
    sym::cover("ok");
    sym::observe(all, "all");
    SYM_ASSERT(all.size() <= args.size(), "tokens");
  } catch (po::error& e) { sym::cover("error"); sym::observe(e.what(), "what"); }
}
