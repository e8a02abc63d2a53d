"""One-off generator of the table modules of the specification (committed; never run by a check).

The published tables (PhenomD fit coefficients, ringdown frequencies) are copied as exact decimals
from the source text of the pinned commit; the not-a-knot spline second derivatives are computed here
in exact-ish arithmetic and re-verified inside Quint (tables_test.qnt).
"""
import ast, re, sys
from decimal import Decimal, getcontext
getcontext().prec = 80
sys.set_int_max_str_digits(0)
R = '/repo/src/ripplegw/waveforms/'
S = 10 ** 50

def dec_tables(path, names):
    src = open(path).read()
    tree = ast.parse(src)
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', None) in names:
            seg = ast.get_source_segment(src, node.value.args[0])
            seg = re.sub(r'#.*', '', seg)
            nums = [Decimal(x) for x in re.findall(r'-?\d+\.?\d*(?:[eE][-+]?\d+)?', seg)]
            out[node.targets[0].id] = nums
    return out

def fx(dv):
    return int((dv * S).to_integral_value())

W = 60            # decimal digits per packed number
OFF = 5 * 10 ** (W - 1)

def chunked(name, ints, n=118):
    """rows of n numbers, each row one integer in base 10^W (offset so that digits are non-negative)"""
    rows = []
    for c in range(0, len(ints), n):
        v = 0
        for x in reversed(ints[c:c+n]):
            assert abs(x) < OFF
            v = v * 10**W + x + OFF
        rows.append(f"  pure val {name}_{c//n} = unpack({len(ints[c:c+n])}, {v})\n")
    return ''.join(rows) + f"  pure val {name} = List({', '.join(f'{name}_{j}' for j in range(len(rows)))})\n"

UNPACK = """  /// a row of n numbers packed as base 10^60 digits (least significant first, offset 5e59)
  pure def unpack(n: int, v: int): List[int] =
    range(0, n).foldl((v, List()), (a, _k) => (a._1 / 10^60, a._2.append(a._1 % 10^60 - 5 * 10^59)))._2
"""

def spline_m(x, y):
    """second derivatives of the not-a-knot cubic spline (dense-banded elimination in Decimal)"""
    n = len(x)
    h = [x[i+1]-x[i] for i in range(n-1)]
    # interior equations; eliminate M0 and M_{n-1} by the not-a-knot conditions
    # M0 = M1 - h0/h1 (M2-M1) ; Mn-1 = Mn-2 + h_{n-2}/h_{n-3} (Mn-2 - Mn-3)
    a = [Decimal(0)]*n; b = [Decimal(0)]*n; c = [Decimal(0)]*n; r = [Decimal(0)]*n
    for i in range(1, n-1):
        a[i] = h[i-1]; b[i] = 2*(h[i-1]+h[i]); c[i] = h[i]
        r[i] = 6*((y[i+1]-y[i])/h[i] - (y[i]-y[i-1])/h[i-1])
    k = h[0]/h[1]
    b[1] += a[1]*(1+k); c[1] -= a[1]*k; a[1] = Decimal(0)
    k2 = h[n-2]/h[n-3]
    b[n-2] += c[n-2]*(1+k2); a[n-2] -= c[n-2]*k2; c[n-2] = Decimal(0)
    for i in range(2, n-1):
        w = a[i]/b[i-1]; b[i] -= w*c[i-1]; r[i] -= w*r[i-1]
    M = [Decimal(0)]*n
    M[n-2] = r[n-2]/b[n-2]
    for i in range(n-3, 0, -1):
        M[i] = (r[i]-c[i]*M[i+1])/b[i]
    M[0] = M[1]-k*(M[2]-M[1]); M[n-1] = M[n-2]+k2*(M[n-2]-M[n-3])
    return M

def main():
    t = dec_tables(R+'IMRPhenomD_utils.py', {'PhenomD_coeff_table'})['PhenomD_coeff_table']
    src = open(R+'IMRPhenomD_utils.py').read()
    # drop the "(element k)" comments already removed; sanity
    assert len(t) == 19*11, len(t)
    q = dec_tables(R+'IMRPhenomD_QNMdata.py', {'_QNMData_a', '_QNMData_fRD', '_QNMData_fdamp'})
    A, F, D = q['_QNMData_a'], q['_QNMData_fRD'], q['_QNMData_fdamp']
    assert len(A) == len(F) == len(D) == 1003 or print(len(A), len(F), len(D))
    with open('/verif/spec/phenomd_tables.qnt', 'w') as o:
        o.write("/// Published tables of IMRPhenomD (arXiv:1508.07253 table V; ringdown frequencies of LALSimulation).\n")
        o.write("/// Generated once by tools/gen_tables.py; the spline equations are checked by tables_test.qnt.\n")
        o.write("module phenomd_tables {\n")
        o.write("  /// 19 phenomenological coefficients x 11 fit terms, fixed point\n")
        rows = [t[11*k:11*k+11] for k in range(19)]
        for k, r in enumerate(rows):
            o.write(f"  pure val FIT_{k} = List({', '.join(str(fx(v)) for v in r)})\n")
        o.write(f"  pure val FIT = List({', '.join('FIT_%d' % k for k in range(19))})\n")
        o.write(UNPACK)
        o.write("  /// knots (final spin), ringdown and damping frequency, and spline second derivatives, in rows of 118\n")
        o.write(chunked('QA', [fx(v) for v in A]))
        o.write(chunked('QR', [fx(v) for v in F]))
        o.write(chunked('QD', [fx(v) for v in D]))
        o.write(chunked('QR2', [fx(v) for v in spline_m(A, F)]))
        o.write(chunked('QD2', [fx(v) for v in spline_m(A, D)]))
        o.write("}\n")
if __name__ == "__main__": main()

def phenomx():
    t = dec_tables(R+'IMRPhenomX_utils.py', {'PhenomX_amp_coeff_table', 'PhenomX_phase_coeff_table'})
    A, P = t['PhenomX_amp_coeff_table'], t['PhenomX_phase_coeff_table']
    assert len(A) == 7*42 and len(P) == 13*49, (len(A), len(P))
    with open('/verif/spec/phenomx_tables.qnt', 'w') as o:
        o.write("/// Calibrated coefficients of IMRPhenomXAS (arXiv:2001.11412, LALSimIMRPhenomX_inspiral/intermediate/ringdown.c).\n")
        o.write("/// One packed row per collocation value: 7 amplitude rows of 42 numbers, 13 phase rows of 49.\n")
        o.write("module phenomx_tables {\n")
        o.write(UNPACK)
        o.write(chunked('XA', [fx(v) for v in A], 42))
        o.write(chunked('XP', [fx(v) for v in P], 49))
        o.write("}\n")
phenomx()
