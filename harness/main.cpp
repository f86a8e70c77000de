// driver SCRIPT TRACE SCRATCH: executes the operations of a script (one JSON object per
// line) on the real classes and records what is observable after each of them.
#include <iostream>
#include "io.hpp"

int main(int argc, char ** argv)
{
  if (argc < 4) {std::cerr << "driver SCRIPT TRACE SCRATCH\n"; return 2;}
  std::ifstream in(argv[1]);
  Ctx ctx;
  ctx.out.open(argv[2]);
  ctx.scratch = argv[3];
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) {continue;}
    json op = json::parse(line);
    // Announced first, so that an abort names its operation
    std::cerr << "@ " << line << std::endl;
    bool done = false;
    for (auto f : {FilterOp, SystemOp, VisionOp, BoardOp, ProgramOp, ReadOp, NodeOp, MiscOp}) {
      if (f != nullptr && f(ctx, op)) {done = true; break;}
    }
    if (!done) {
      std::cerr << "unknown op " << line << "\n";
      return 2;
    }
  }
  return 0;
}
