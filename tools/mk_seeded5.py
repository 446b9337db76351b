import shutil, subprocess
exec(open("/verif/tools/mk_seeded4.py").read().split('INIT=')[0])
def go5(i, prop, needs, breaks, sh, pat, **files):
    mk(i, prop, needs, breaks, sh, **files)
    open("/verif/seeded/"+i+"/kit_bn.h","w").write("// stand-in for the pairing library: a group element is its bytes\n#pragma once\nnamespace bn { struct Ec1 { unsigned long long w[3]; }; }\n")
    subprocess.check_call(["python3","/verif/tools/mut.py","patch","/verif/tools/trans_muts.py",pat,"/verif/seeded/"+i+"/patch.diff"])
TB=build("src/linear_gkr/prime_field.cpp")
TH='''#include <cstring>
#include <cstdio>
#include "linear_gkr/transcript.h"
using prime_field::field_element;
static bool same(field_element a, field_element b) { return !(a != b); }
'''
INIT='	prime_field::init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);\n'
go5("Z07-carry-half","Z07","a transcript of at least three compression blocks, the two differing in the last part of a middle one",
 "only half of the digest enters the next block, so messages in the middle of the transcript do not influence the challenge",TB+'"$d/tool" || exit 1\n',"t-carry",
 demo_dot_cpp=TH+'''int main()
{
'''+INIT+'''	proof_transcript a, b;
	for(int i = 0; i < 8; ++i)
	{
		a.msg.push_back(container(field_element(100 + i), container::fld_ele_indicator));
		b.msg.push_back(container(field_element(i == 3 ? 777 : 100 + i), container::fld_ele_indicator));
	}
	if(same(a.random(), b.random())) { puts("the fourth message does not influence the challenge"); return 1; }
	return 0;
}
''')
go5("Z07-group-bits","Z07","two transcripts that differ only in the top bit of a byte of a group element",
 "the encoding of group elements forgets one bit of every byte",TB+'"$d/tool" || exit 1\n',"t-bit7",
 demo_dot_cpp=TH+'''int main()
{
'''+INIT+'''	bn::Ec1 p, q;
	memset((void*)&p, 0, sizeof(p)); memset((void*)&q, 0, sizeof(q));
	((unsigned char*)&q)[5] = 0x80;
	proof_transcript a, b;
	a.msg.push_back(container(p)); b.msg.push_back(container(q));
	if(same(a.random(), b.random())) { puts("two group elements give one challenge"); return 1; }
	return 0;
}
''')
