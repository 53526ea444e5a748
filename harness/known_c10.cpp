// Probe of a listed finding of C10 (see known_findings.txt); prints a line while it is there.
#include "efp.hpp"
#include <cstdio>
int main() {
    efp::Vcb<int, 3> r;
    for (int i = 0; i < 5; ++i) r.push_back(i);   // 2 3 4
    r[2] = 40;
    r.push_back(5);
    r.push_back(6);                               // 40 5 6 expected
    efp::Vcq<int, 3> q;
    for (int i = 0; i < 5; ++i) q.push_back(i);
    q[2] = 40;
    q.push_back(5);
    q.push_back(6);
    if (r[0] != 40 || q[0] != 40)
        printf("FINDING ring-element-assignment a value assigned through a mutable reference to a ring element (operator[], nth, iterators) is lost after a wrap-around: {2,3,4}, [2]=40, push 5, push 6 shows %d %d %d in Vcb<int,3> and %d %d %d in Vcq<int,3>\n", r[0], r[1], r[2], q[0], q[1], q[2]);
}
