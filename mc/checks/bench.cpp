#include "common/lang.hpp"
#include <chrono>
using namespace mc;
const char* const mc::check_id = "BENCH";
static double T(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
void mc::enumerate() {
    double t=T();
    for (int i=0;i<200;++i) { Vm vm; }
    fmt::print(stderr,"vm {} us\n",(T()-t)/200*1e6);
    t=T();
    for (int i=0;i<200;++i) compile("export func main() { return 1 + 2; }", "m");
    fmt::print(stderr,"compile {} us\n",(T()-t)/200*1e6);
    std::string big="import h;\n";
    for (int i=0;i<100;++i) big+=fmt::format("export func f{}() {{ var a = h.t(1); if (a > 2) {{ a = a + 2; }} return a; }}\n",i);
    t=T();
    for (int i=0;i<20;++i) compile(big, "m");
    fmt::print(stderr,"compile100 {} us\n",(T()-t)/20*1e6);
    Vm vm; vm.load_source(big,"m");
    t=T();
    for (int i=0;i<100;++i) { auto o=vm.call("m",fmt::format("f{}",i)); if(!o.ok) fmt::print(stderr,"bad {}\n",o.str()); }
    fmt::print(stderr,"call {} us; log {}\n",(T()-t)/100*1e6, vm.log.size());
}
