"""An independent table of units: name -> (SI factor, dimensions, relative accuracy the definition is given to)."""

BASE = ['m', 'kg', 's', 'A', 'K', 'mol', 'cd', 'rad', 'sr', 'USD', 'pax', 'byte']
PREFIX = {'Y': 1e24, 'Z': 1e21, 'E': 1e18, 'P': 1e15, 'T': 1e12, 'G': 1e9, 'M': 1e6, 'k': 1e3, 'h': 1e2, 'da': 1e1,
          'd': 1e-1, 'c': 1e-2, 'm': 1e-3, 'u': 1e-6, 'n': 1e-9, 'p': 1e-12, 'f': 1e-15, 'a': 1e-18, 'z': 1e-21,
          'y': 1e-24, 'Ki': 2. ** 10, 'Mi': 2. ** 20, 'Gi': 2. ** 30, 'Ti': 2. ** 40, 'Pi': 2. ** 50, 'Ei': 2. ** 60}
PI = 3.141592653589793

_DEF = """
g 1e-3 kg
Hz 1 s-1
N 1 kg m s-2
Pa 1 kg m-1 s-2
J 1 kg m2 s-2
W 1 kg m2 s-3
C 1 A s
V 1 kg m2 s-3 A-1
F 1 kg-1 m-2 s4 A2
ohm 1 kg m2 s-3 A-2
S 1 kg-1 m-2 s3 A2
Wb 1 kg m2 s-2 A-1
T 1 kg s-2 A-1
H 1 kg m2 s-2 A-2
lm 1 cd sr
lx 1 cd sr m-2
Bq 1 s-1
Gy 1 m2 s-2
Sv 1 m2 s-2
kat 1 mol s-1
min 60 s
h 3600 s
d 86400 s
wk 604800 s
week 604800 s
a 31556925.9936 s
yr 31556925.9936 s
year 31556925.9936 s
mo 2629743.8328 s
month 2629743.8328 s
deg 0.017453292519943295 rad
arc_minute 2.908882086657216e-4 rad
arc_second 4.84813681109536e-6 rad
rev 6.283185307179586 rad
rpm 0.10471975511965977 rad s-1
rps 6.283185307179586 rad s-1
ha 1e4 m2
L 1e-3 m3
t 1e3 kg
bar 1e5 kg m-1 s-2
Ang 1e-10 m
NM 1852 m
nmi 1852 m
b 1e-28 m2
kn 0.5144444444444445 m s-1
knot 0.5144444444444445 m s-1
erg 1e-7 kg m2 s-2
dyn 1e-5 kg m s-2
P 0.1 kg m-1 s-1
St 1e-4 m2 s-1
sb 1e4 cd m-2
ph 1e4 cd sr m-2
Mx 1e-8 kg m2 s-2 A-1
gauss 1e-4 kg s-2 A-1
Oe 79.57747154594767 A m-1
degK 1 K
degR 0.5555555555555556 K
inch 0.0254 m
ft 0.3048 m
mi 1609.344 m
oz 0.028349523125 kg
lb 0.45359237 kg
lbm 0.45359237 kg
ton 907.18474 kg
acre 4046.8564224 m2
tsp 4.92892159375e-6 m3
tbsp 1.478676478125e-5 m3
floz 2.95735295625e-5 m3
cup 2.365882365e-4 m3
pt 4.73176473e-4 m3
qt 9.46352946e-4 m3
galUK 4.54609e-3 m3
cal 4.184 kg m2 s-2
cali 4.1868 kg m2 s-2
Btu 1055.05585262 kg m2 s-2
atm 101325 kg m-1 s-2
torr 133.32236842105263 kg m-1 s-2
c0 299792458 m s-1
mu0 1.2566370614359173e-6 kg m s-2 A-2
eps0 8.854187817620389e-12 kg-1 m-3 s4 A2
psi 6894.757293168361 kg m-1 s-2 ~1e-9
psf 47.88025898033584 kg m-1 s-2 ~1e-9
lbf 4.4482216152605 kg m s-2 ~1e-8
slug 14.593902937206364 kg ~1e-8
galUS 3.785411784e-3 m3 ~1e-6
ly 9.4607304725808e15 m ~1e-6
ua 1.495978707e11 m ~1e-6
hp 745.6998715822702 kg m2 s-3 ~1e-6
Nav 6.02214076e23 mol-1 ~1e-4
R 8.31446261815324 kg m2 s-2 K-1 mol-1 ~1e-4
V0 0.02241396954 m3 mol-1 ~1e-4
planck 6.62607015e-34 kg m2 s-1 ~1e-4
hbar 1.054571817e-34 kg m2 s-1 ~1e-4
e 1.602176634e-19 A s ~1e-4
eV 1.602176634e-19 kg m2 s-2 ~1e-4
Da 1.66053906660e-27 kg ~1e-4
u 1.66053906660e-27 kg ~1e-4
me 9.1093837015e-31 kg ~1e-4
mp 1.67262192369e-27 kg ~1e-4
mn 1.67492749804e-27 kg ~1e-4
a0 5.29177210903e-11 m ~1e-4
Eh 4.3597447222071e-18 kg m2 s-2 ~1e-4
Grav 6.6743e-11 m3 kg-1 s-2 ~1e-3
sigma 5.670374419e-8 kg s-3 K-4 ~1e-3
Ken 1.380649e-23 kg m2 s-2 ~1e-4
Rinfinity 10973731.568160 m-1 ~1e-4
re 2.8179403262e-15 m ~1e-4
lambdac 2.42631023867e-12 m ~1e-4
lambdap 1.32140985539e-15 m ~1e-4
lambdan 1.31959090581e-15 m ~1e-4
mue 9.2847647043e-24 A m2 ~1e-4
mup 1.41060679736e-26 A m2 ~1e-4
mub 9.2740100783e-24 A m2 ~1e-4
mun 5.0507837461e-27 A m2 ~1e-4
gammap 2.6752218744e8 rad A s kg-1 ~1e-4
gammapc 2.6752218744e8 rad A s kg-1 ~1e-4
phi0 2.067833848e-15 kg m2 s-2 A-1 ~1e-4
hme 7.2738950651e-4 m2 s-1 ~1e-4
unitless 1
"""


def _dims(words):
    d = dict()
    for w in words:
        i = len(w)
        while w[i - 1] in '-0123456789':
            i -= 1
        d[w[:i]] = d.get(w[:i], 0) + (int(w[i:]) if w[i:] else 1)
    return d


UNITS = dict((b, (1.0, {b: 1}, 1e-12)) for b in BASE)
for _line in _DEF.strip().splitlines():
    _w = _line.split()
    _tol = 1e-11
    if _w[-1].startswith('~'):
        _tol = float(_w.pop()[1:])
    UNITS[_w[0]] = (float(_w[1]), _dims(_w[2:]), _tol)

# offset scales: kelvin = factor * (value + offset)
OFFSET = {'degC': (1.0, 273.15), 'degF': (5.0 / 9.0, 459.67)}


def mul(a, b, p=1):
    """Product of two dimension dictionaries, the second to the power p."""
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) + p * v
        if d[k] == 0:
            del d[k]
    return d
