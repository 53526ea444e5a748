// Probe of a listed finding of C17 (see known_findings.txt); prints a line while it is there.
#include "efp.hpp"
#include <cstdio>
int main() {
    efp::String s = efp::format("{:.1000f}", 169.5);
    if (s.size() != 1004)
        printf("FINDING float-digits-767 floating point text is limited to 767 significant digits: format(\"{:.1000f}\", 169.5) has %d digits after the point instead of 1000\n", (int)s.size() - 4);
}
