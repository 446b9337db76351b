exec(open("/verif/tools/mk_seeded.py").read().split('mk("F01-sum')[0])
EV='''import subprocess, sys, os
P = 16798108731015832284940804142231733909759579603404752749028378864165570215949
def evaluate(text):
    t = list(map(int, text.split())); d, i, prev, lays = t[0], 1, [], []
    for l in range(d):
        n = t[i]; i += 1; cur = []
        for g in range(n):
            ty, gi, u, v = t[i:i + 4]; i += 4
            a = lambda k: prev[k]
            x = (u if ty == 3 else 0 if ty == 2 else a(u) + a(v) if ty == 0 else a(u) * a(v) if ty == 1 else sum(prev[u:v]) if ty == 5 else 1 - a(u) if ty == 6
                 else a(u) - a(v) if ty == 7 else a(u) + a(v) - 2 * a(u) * a(v) if ty == 8 else (1 - a(u)) * a(v) if ty == 9 else a(u))
            cur.append(x % P)
        prev = cur; lays.append(cur)
    return lays
'''
def comp(src): return 'clang++ -std=c++11 -O1 -w '+src+' -o "$d/tool" || exit 2\ncd "$d" || exit 2\npython3 "$here/demo.py" "$d/tool"'
mk("G01-size-one","G01","mode 4 with 1x1 matrices",
 "the sum gate of a 1x1 product has an empty range, so the circuit outputs 0",comp("bin/gen.cpp"),demo_dot_py=EV+'''
for n in (1, 2, 4, 8):
    text = subprocess.run([sys.argv[1], "4", str(n)], stdout=subprocess.PIPE).stdout.decode()
    l = evaluate(text)
    A = [l[0][i * n:i * n + n] for i in range(n)]; B = [l[0][n * n + i * n:n * n + i * n + n] for i in range(n)]
    want = [sum(A[i][k] * B[k][j] for k in range(n)) % P for i in range(n) for j in range(n)]
    if l[-1] != want: print("size", n, "gives", l[-1], "instead of", want); sys.exit(1)
print("products are right")
''')
mk("R01-naab-order","R01","a NAAB gate whose first operand has the larger number",
 "the operands of (1-a)b are swapped",comp("parser_sha_data_parallel.cpp"),demo_dot_py=EV+'''
for a, b in ((0, 1), (1, 0), (2, 1), (0, 3), (3, 2)):
    open("c.pws", "w").write("".join("P V%d = I%d E\\\\n" % (i, i) for i in range(4)) + "P V4 = V%d NAAB V%d E\\\\nP O5 = V4 E\\\\n" % (a, b))
    x = [3, 5, 7, 11]
    open("r.pws", "w").write("".join("P V%d = %d E\\\\n" % (i, x[i]) for i in range(4)) + "".join("P V%d = V%d PASS V%d E\\\\n" % (4 + i, i, i) for i in range(4)) + "".join("P O%d = V%d E\\\\n" % (8 + i, 4 + i) for i in range(4)))
    r = subprocess.run([sys.argv[1], "c.pws", "r.pws"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    got = [y for y in evaluate(open("test_circuit.txt").read())[-1] if y]
    want = [(1 - x[a]) * x[b] % P]
    if got != want: print("(1-V%d)V%d: got" % (a, b), got, "want", want); sys.exit(1)
print("outputs are right")
'''.replace("\\\\n","\\n"))
def lan(op, ty, expr): return EV+'''
rep, x, y = 4, [3, 5, 7, 11], [13, 17, 19, 23]
open("c.pws", "w").write("P V0 = I0 E\\nP V1 = I1 E\\nP V2 = V0 %s V1 E\\nP V3 = V2 %s V1 E\\nP O4 = V3 E\\n")
s = "".join("P V%%d = %%d E\\n" %% (i, z) for i, z in enumerate(x + y)) + "".join("P V%%d = V%%d PASS V%%d E\\n" %% (8 + i, i, i) for i in range(8)) + "".join("P O%%d = V%%d E\\n" %% (16 + i, 8 + i) for i in range(8))
open("r.pws", "w").write(s)
subprocess.run([sys.argv[1], "c.pws", "r.pws", str(rep)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
got = [z for z in evaluate(open("%s").read())[-1] if z]
want = [(%s) %% P for a, b in zip(x, y)]
if got != want: print("got", got, "want", want); sys.exit(1)
print("outputs are right")
''' % (op, op, ty, expr)
mk("R02-copy-zero","R02","at least two copies and a product whose second operand is an input",
 "the second factor is taken from another copy",comp("parser_lanczos.cpp"),demo_dot_py=lan("*","lanczos_circuit.txt","a * b * b"))
mk("R03-minus-copy","R03","at least two copies and a difference whose second operand is an input",
 "the subtrahend is taken from the first copy",comp("parser_sha.cpp"),demo_dot_py=lan("minus","sha_circuit.txt","a - b - b"))
