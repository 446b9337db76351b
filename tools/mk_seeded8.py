src=open("/verif/tools/mk_seeded7.py").read()
i=src.index('gop("M01-wide'); exec(src[:i])
def gom(i, prop, needs, breaks, sh, pat, kit=False, **files):
    mk(i, prop, needs, breaks, sh, **files)
    if kit: shutil.copy("/verif/tools/kit_bn.h", "/verif/seeded/"+i+"/kit_bn.h")
    subprocess.check_call(["python3","/verif/tools/mut.py","patch","/verif/tools/mem_muts.py",pat,"/verif/seeded/"+i+"/patch.diff"])
FS="src/linear_gkr/verifier_fast_track.cpp src/linear_gkr/prover_fast_track.cpp src/linear_gkr/polynomial.cpp src/linear_gkr/prime_field.cpp"
RUNA='ASAN_OPTIONS=detect_leaks=0:alloc_dealloc_mismatch=0 "$d/tool" >out.txt 2>err.txt; grep "ERROR: AddressSanitizer" err.txt && exit 1\nexit 0\n'
gom("N01-half-table","N01","a circuit whose widest layer has an odd number of coordinates, and a layer of that width reached as the inner one",
 "the parallel prover's half tables of weights are one coordinate too small for odd widths: it writes past them",
 'clang++ -std=c++11 -O1 -w -g -fsanitize=address -I include "$here/demo.cpp" %s -o "$d/tool" -lgmpxx -lgmp -lpthread || exit 2\ncd "$d" || exit 2\n' % PS + cir([8,8,8]) + RUNA, "mm-para-half",
 demo_dot_cpp=PR+'int main() { setup(); return v.verify() ? 0 : 1; }\n')
ZC=cir([32,32,8])+"python3 - <<'PY'\nimport os\nt=open('test_circuit.txt').read(); open('c.txt','w').write(t); open('m.txt','w').write('0 0 0 0 0\\n'*3)\nPY\n"
gom("N01-zk-tables","N01","a circuit whose widest layer has an odd number of coordinates",
 "the verifier's second half tables are one coordinate too small for odd widths: it writes past them",
 build(ZK,"-fsanitize=address -g")+ZC+RUNA, "mm-zkv-half", kit=True,
 demo_dot_cpp=RUN+'int main() { setup(); return v.verify("result.txt") ? 0 : 1; }\n')
gom("N01-blinding-slot","N01","any proof: the blinding coefficient of the input commitment",
 "the vector handed to the input commitment has no room for its blinding coefficient, which is read and written one past its end",
 build(ZK,"-fsanitize=address -g")+CIR+RUNA, "mm-zk-input", kit=True,
 demo_dot_cpp=RUN+'int main() { setup(); return v.verify("result.txt") ? 0 : 1; }\n')
