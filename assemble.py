import sys
mode, body, out, *pre = sys.argv[1:]
t = ''
for p in pre:
    t += open('/verif/contracts/' + p).read() + '\n'
if mode == 'A':
    t = t.replace('//PANICREQ', 'requires false,').replace('//EXREQ', 'requires self.ex_ok(),')
head = '#![allow(warnings)]\n'
t = head + 'use vstd::prelude::*;\nverus! {\n' + t.replace('use vstd::prelude::*;', '', 1) + '\n' + open(body).read() + '\n}\nfn main() {}\n'
open(out, 'w').write(t)
