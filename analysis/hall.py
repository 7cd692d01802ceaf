"""Independent description of the 230 space groups: Hall symbols (International Tables B,
A1.4.2.7) and their expansion.  Nothing here is read from the analysed repository."""
from fractions import Fraction as F
from itertools import product

# number -> Hall symbols: the standard setting first, the other origin choice (if any) after it
HALL = {}
for line in '''
1 P 1
2 -P 1
3 P 2y
4 P 2yb
5 C 2y
6 P -2y
7 P -2yc
8 C -2y
9 C -2yc
10 -P 2y
11 -P 2yb
12 -C 2y
13 -P 2yc
14 -P 2ybc
15 -C 2yc
16 P 2 2
17 P 2c 2
18 P 2 2ab
19 P 2ac 2ab
20 C 2c 2
21 C 2 2
22 F 2 2
23 I 2 2
24 I 2b 2c
25 P 2 -2
26 P 2c -2
27 P 2 -2c
28 P 2 -2a
29 P 2c -2ac
30 P 2 -2bc
31 P 2ac -2
32 P 2 -2ab
33 P 2c -2n
34 P 2 -2n
35 C 2 -2
36 C 2c -2
37 C 2 -2c
38 A 2 -2
39 A 2 -2b
40 A 2 -2a
41 A 2 -2ab
42 F 2 -2
43 F 2 -2d
44 I 2 -2
45 I 2 -2c
46 I 2 -2a
47 -P 2 2
48 P 2 2 -1n|-P 2ab 2bc
49 -P 2 2c
50 P 2 2 -1ab|-P 2ab 2b
51 -P 2a 2a
52 -P 2a 2bc
53 -P 2ac 2
54 -P 2a 2ac
55 -P 2 2ab
56 -P 2ab 2ac
57 -P 2c 2b
58 -P 2 2n
59 P 2 2ab -1ab|-P 2ab 2a
60 -P 2n 2ab
61 -P 2ac 2ab
62 -P 2ac 2n
63 -C 2c 2
64 -C 2bc 2
65 -C 2 2
66 -C 2 2c
67 -C 2b 2
68 C 2 2 -1bc|-C 2b 2bc
69 -F 2 2
70 F 2 2 -1d|-F 2uv 2vw
71 -I 2 2
72 -I 2 2c
73 -I 2b 2c
74 -I 2b 2
75 P 4
76 P 4w
77 P 4c
78 P 4cw
79 I 4
80 I 4bw
81 P -4
82 I -4
83 -P 4
84 -P 4c
85 P 4ab -1ab|-P 4a
86 P 4n -1n|-P 4bc
87 -I 4
88 I 4bw -1bw|-I 4ad
89 P 4 2
90 P 4ab 2ab
91 P 4w 2c
92 P 4abw 2nw
93 P 4c 2
94 P 4n 2n
95 P 4cw 2c
96 P 4nw 2abw
97 I 4 2
98 I 4bw 2bw
99 P 4 -2
100 P 4 -2ab
101 P 4c -2c
102 P 4n -2n
103 P 4 -2c
104 P 4 -2n
105 P 4c -2
106 P 4c -2ab
107 I 4 -2
108 I 4 -2c
109 I 4bw -2
110 I 4bw -2c
111 P -4 2
112 P -4 2c
113 P -4 2ab
114 P -4 2n
115 P -4 -2
116 P -4 -2c
117 P -4 -2ab
118 P -4 -2n
119 I -4 -2
120 I -4 -2c
121 I -4 2
122 I -4 2bw
123 -P 4 2
124 -P 4 2c
125 P 4 2 -1ab|-P 4a 2b
126 P 4 2 -1n|-P 4a 2bc
127 -P 4 2ab
128 -P 4 2n
129 P 4ab 2ab -1ab|-P 4a 2a
130 P 4ab 2n -1ab|-P 4a 2ac
131 -P 4c 2
132 -P 4c 2c
133 P 4n 2c -1n|-P 4ac 2b
134 P 4n 2 -1n|-P 4ac 2bc
135 -P 4c 2ab
136 -P 4n 2n
137 P 4n 2n -1n|-P 4ac 2a
138 P 4n 2ab -1n|-P 4ac 2ac
139 -I 4 2
140 -I 4 2c
141 I 4bw 2bw -1bw|-I 4bd 2
142 I 4bw 2aw -1bw|-I 4bd 2c
143 P 3
144 P 31
145 P 32
146 R 3
147 -P 3
148 -R 3
149 P 3 2
150 P 3 2"
151 P 31 2c (0 0 1)
152 P 31 2"
153 P 32 2c (0 0 -1)
154 P 32 2"
155 R 3 2"
156 P 3 -2"
157 P 3 -2
158 P 3 -2"c
159 P 3 -2c
160 R 3 -2"
161 R 3 -2"c
162 -P 3 2
163 -P 3 2c
164 -P 3 2"
165 -P 3 2"c
166 -R 3 2"
167 -R 3 2"c
168 P 6
169 P 61
170 P 65
171 P 62
172 P 64
173 P 6c
174 P -6
175 -P 6
176 -P 6c
177 P 6 2
178 P 61 2 (0 0 -1)
179 P 65 2 (0 0 1)
180 P 62 2c (0 0 1)
181 P 64 2c (0 0 -1)
182 P 6c 2c
183 P 6 -2
184 P 6 -2c
185 P 6c -2
186 P 6c -2c
187 P -6 2
188 P -6c 2
189 P -6 -2
190 P -6c -2c
191 -P 6 2
192 -P 6 2c
193 -P 6c 2
194 -P 6c 2c
195 P 2 2 3
196 F 2 2 3
197 I 2 2 3
198 P 2ac 2ab 3
199 I 2b 2c 3
200 -P 2 2 3
201 P 2 2 3 -1n|-P 2ab 2bc 3
202 -F 2 2 3
203 F 2 2 3 -1d|-F 2uv 2vw 3
204 -I 2 2 3
205 -P 2ac 2ab 3
206 -I 2b 2c 3
207 P 4 2 3
208 P 4n 2 3
209 F 4 2 3
210 F 4d 2 3
211 I 4 2 3
212 P 4acd 2ab 3
213 P 4bd 2ab 3
214 I 4bd 2c 3
215 P -4 2 3
216 F -4 2 3
217 I -4 2 3
218 P -4n 2 3
219 F -4a 2 3
220 I -4bd 2c 3
221 -P 4 2 3
222 P 4 2 3 -1n|-P 4a 2bc 3
223 -P 4n 2 3
224 P 4n 2 3 -1n|-P 4bc 2bc 3
225 -F 4 2 3
226 -F 4a 2 3
227 F 4d 2 3 -1d|-F 4vw 2vw 3
228 F 4d 2 3 -1ad|-F 4ud 2vw 3
229 -I 4 2 3
230 -I 4bd 2c 3
'''.strip().split('\n'):
    n, s = line.split(' ', 1)
    HALL[int(n)] = s.split('|')

CENT = {'P': [], 'A': [(0, 6, 6)], 'B': [(6, 0, 6)], 'C': [(6, 6, 0)], 'I': [(6, 6, 6)],
        'R': [(8, 4, 4), (4, 8, 8)], 'F': [(0, 6, 6), (6, 0, 6), (6, 6, 0)]}

TR = {'a': (6, 0, 0), 'b': (0, 6, 0), 'c': (0, 0, 6), 'n': (6, 6, 6), 'u': (3, 0, 0), 'v': (0, 3, 0),
      'w': (0, 0, 3), 'd': (3, 3, 3)}

I3 = ((1, 0, 0), (0, 1, 0), (0, 0, 1))


def mm(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def mv(a, v):
    return tuple(sum(a[i][k] * v[k] for k in range(3)) for i in range(3))


def neg(a):
    return tuple(tuple(-x for x in r) for r in a)


def det(a):
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
            + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))


def tr(a):
    return tuple(zip(*a))


def inv(a):
    d = F(det(a))
    c = [[0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            r = [x for x in range(3) if x != i]
            s = [x for x in range(3) if x != j]
            m = a[r[0]][s[0]] * a[r[1]][s[1]] - a[r[0]][s[1]] * a[r[1]][s[0]]
            c[j][i] = (-1) ** (i + j) * m / d
    return tuple(map(tuple, c))


ZROT = {1: I3, 2: ((-1, 0, 0), (0, -1, 0), (0, 0, 1)), 3: ((0, -1, 0), (1, -1, 0), (0, 0, 1)),
        4: ((0, -1, 0), (1, 0, 0), (0, 0, 1)), 6: ((1, -1, 0), (1, 0, 0), (0, 0, 1))}


def rotation(n, axis):
    """principal-axis rotations, and the face-diagonal two-folds ' and \""""
    r = ZROT[n]
    cyc = ((0, 0, 1), (1, 0, 0), (0, 1, 0))       # z->x->y->z
    if axis == 'z':
        return r
    if axis == 'x':
        return mm(mm(cyc, r), tr(cyc))
    if axis == 'y':
        return mm(mm(tr(cyc), r), cyc)
    if axis == '*':
        return ((0, 0, 1), (1, 0, 0), (0, 1, 0))
    raise ValueError(axis)


PRIME = {  # preceding axis -> rotation
    ("'", 'z'): ((0, -1, 0), (-1, 0, 0), (0, 0, -1)), ('"', 'z'): ((0, 1, 0), (1, 0, 0), (0, 0, -1)),
    ("'", 'x'): ((-1, 0, 0), (0, 0, -1), (0, -1, 0)), ('"', 'x'): ((-1, 0, 0), (0, 0, 1), (0, 1, 0)),
    ("'", 'y'): ((0, 0, -1), (0, -1, 0), (-1, 0, 0)), ('"', 'y'): ((0, 0, 1), (0, -1, 0), (1, 0, 0))}


def parse(s):
    """Hall symbol -> (centering letter, centering vectors /12, [generators (R, t/12)])"""
    shift = (0, 0, 0)
    if '(' in s:
        s, sh = s.split('(')
        shift = tuple(int(x) for x in sh.rstrip(') ').split())
    parts = s.split()
    gens = []
    lat = parts[0]
    if lat[0] == '-':
        gens.append((neg(I3), (0, 0, 0)))
        lat = lat[1:]
    prev_n = prev_axis = None
    for pos, tok in enumerate(parts[1:]):
        improper = tok[0] == '-'
        if improper:
            tok = tok[1:]
        n = int(tok[0])
        rest = tok[1:]
        axis = None
        prime = None
        if rest and rest[0] in 'xyz':
            axis = rest[0]
            rest = rest[1:]
        elif rest and rest[0] in '\'"*':
            prime = rest[0]
            rest = rest[1:]
        if axis is None and prime is None:
            if pos == 0 or n == 1:
                axis = 'z'
            elif pos == 1 and n == 2:
                if prev_n in (2, 4):
                    axis = 'x'
                elif prev_n in (3, 6):
                    prime = "'"
            elif pos == 2 and n == 3:
                prime = '*'
        if prime == '*':
            r = rotation(3, '*')
        elif prime:
            r = PRIME[(prime, prev_axis or 'z')]
        else:
            r = rotation(n, axis)
        t = [0, 0, 0]
        for ch in rest:
            if ch.isdigit():
                t['xyz'.index(axis)] += 12 * int(ch) // n
            else:
                for k in range(3):
                    t[k] += TR[ch][k]
        if improper:
            r = neg(r)
        gens.append((r, tuple(x % 12 for x in t)))
        if axis:
            prev_axis = axis
        prev_n = n
    if any(shift):
        # change of origin v (in twelfths): {R|t} -> {R| t + v - R v}
        gens = [(r, tuple((t[i] + shift[i] - mv(r, shift)[i]) % 12 for i in range(3))) for r, t in gens]
    return lat, CENT[lat], gens


def expand(s):
    """full list of operations of the conventional cell {(R, t mod 12)}, and the centering vectors"""
    lat, cent, gens = parse(s)
    gens = gens + [(I3, c) for c in cent]
    ops = {(I3, (0, 0, 0))}
    new = list(ops)
    while new:
        nxt = []
        for r, t in new:
            for gr, gt in gens:
                rt = mv(gr, t)
                o = (mm(gr, r), tuple((rt[i] + gt[i]) % 12 for i in range(3)))
                if o not in ops:
                    ops.add(o)
                    nxt.append(o)
        new = nxt
        assert len(ops) <= 192, s
    return lat, cent, ops


def coset(ops, cent):
    """rotation -> set of translations"""
    d = {}
    for r, t in ops:
        d.setdefault(r, set()).add(t)
    return d
