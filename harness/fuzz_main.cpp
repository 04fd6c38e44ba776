// libFuzzer entry: the bytes are the choices of one case of PBT_PROPERTY.
#include <stdio.h>
#include <stdlib.h>

#include "engine.h"

static std::vector<const Check*> checks;
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  engine_scratch_for_fuzzing();
  const char* p = getenv("PBT_PROPERTY");
  for (auto& c : registry())
    if (p && c.prop == p) checks.push_back(&c);
  if (checks.empty()) {
    fprintf(stderr, "PBT_PROPERTY names no property\n");
    exit(2);
  }
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  Src s(data, size);
  Case c(s);
  try {
    run_one(checks, c);
  } catch (const Excluded&) {
    return -1;
  } catch (const Violation& v) {
    fprintf(stderr, "violated: %s\n%s\n", v.msg.c_str(), c.desc.c_str());
    abort();
  }
  return 0;
}
