// main() of a scheduler driver; make(line) builds the program for one line of the program file.
int main(int argc, char** argv) {
  google::InitGoogleLogging(argv[0]);
  if (argc == 4 && std::string(argv[1]) == "replay") {
    for (const std::string& e : ex::replay(make(argv[2]), argv[3])) std::cout << e << "\n";
    std::cout.flush();
    _exit(0);
  }
  std::vector<std::string> lines;
  std::ifstream in(argv[2]);
  for (std::string l; std::getline(in, l);) if (!l.empty()) lines.push_back(l);
  ex::Budget b;
  b.seed = std::stoull(argv[3]);
  const double scale = std::stod(argv[4]);
  b.dfs_execs = static_cast<int>(b.dfs_execs * scale);
  b.random_execs = static_cast<int>(b.random_execs * scale);
  b.mem_execs = static_cast<int>(b.mem_execs * scale);
  b.pct_execs = static_cast<int>(b.pct_execs * scale);
  b.spurious_execs = static_cast<int>(b.spurious_execs * scale);
  if (argc > 5) b.max_traces = std::stoi(argv[5]);
  return ex::exploreAll(static_cast<int>(lines.size()), [&](int i) { return make(lines[i]); }, b, argv[1], 8);
}
