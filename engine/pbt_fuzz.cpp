// libFuzzer entry: first byte = facet, the rest are the choices of the case.
#include "pbt.h"
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <iostream>
namespace pbt {
std::function<void()> onWorkerStart, onWorkerEnd;
}
using namespace pbt;
static int inCase = 0;
static void onExit() {
    if (inCase) abort();
}
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    atexit(onExit);
    std::cout.rdbuf(nullptr);
    std::clog.rdbuf(nullptr);
    if (onWorkerStart) onWorkerStart();
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    if (size < 2) return 0;
    std::vector<Facet>& fs = facets();
    Facet& f = fs[data[0] % fs.size()];
    Ctx c;
    c.mode = Mode::BYTES;
    c.thorough = true;
    c.bytes.assign(data + 1, data + size);
    inCase = 1;
    try {
        f.fn(c);
    } catch (Fail& e) {
        fprintf(stderr, "FAIL %s\n", e.msg.c_str());
        inCase = 0;
        abort();
    } catch (Discard&) {
    }
    inCase = 0;
    return 0;
}
