#include "san_work.h"

int main(int argc, char **argv) {
  std::map<std::string, CaseFn> props;
  props["D01"] = p_d01;
  props["E15"] = p_e15;
  return drive(argc, argv, props);
}
