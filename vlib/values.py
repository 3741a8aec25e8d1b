"""Read back the data stored in record objects."""
from fractions import Fraction
from vlib.api import ast, need


def actual(expr, components=None):
    """JSON meaning of a stored value (see prog.py)"""
    if isinstance(expr, ast.Implicit_Null):
        return None
    if isinstance(expr, ast.Array_Aggregate):
        return [actual(x) for x in expr.value]
    if isinstance(expr, ast.Tuple_Aggregate):
        return {n: actual(x) for n, x in expr.value.items()}
    if isinstance(expr, ast.Record_Reference):
        return {"$ref": expr.target.fully_qualified_name()}
    if isinstance(expr, ast.Enumeration_Literal):
        return {"$enum": expr.value.name}
    if isinstance(expr, ast.Unary_Expression):
        v = actual(expr.n_operand)
        neg = expr.operator == ast.Unary_Operator.MINUS
        if isinstance(v, dict):
            q = Fraction(v["$dec"])
            q = -q if neg else q
            return {"$dec": "%d/%d" % (q.numerator, q.denominator)}
        return -v if neg else v
    if isinstance(expr, ast.Decimal_Literal):
        q = expr.value
        need(isinstance(q, Fraction), "decimal stored as %s", type(q))
        return {"$dec": "%d/%d" % (q.numerator, q.denominator)}
    need(isinstance(expr, ast.Literal), "unexpected stored value %s", expr)
    return expr.value


def simple(m):
    """what to_python_dict should give for a meaning"""
    if isinstance(m, list):
        return [simple(x) for x in m]
    if isinstance(m, dict):
        if "$dec" in m:
            return float(Fraction(m["$dec"]))
        if "$ref" in m:
            return m["$ref"]
        if "$enum" in m:
            return m["$enum"]
        return {k: simple(v) for k, v in m.items()}
    return m


def same(a, b):
    """strict equality (bool is not int)"""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(sorted(a)) == list(sorted(b)) and \
            all(same(a[k], b[k]) for k in a)
    return a == b


def compare(stab, expect):
    """the symbol table contains exactly the expected objects"""
    objs = {}
    for o in stab.iter_record_objects():
        fq = o.fully_qualified_name()
        need(fq not in objs, "object %s is listed twice", fq)
        objs[fq] = o
    need(set(objs) == set(expect), "objects %s, expected %s", sorted(objs),
         sorted(expect))
    for fq, exp in expect.items():
        o = objs[fq]
        need(o.n_typ.fully_qualified_name() == exp["type"],
             "object %s has type %s, expected %s", fq,
             o.n_typ.fully_qualified_name(), exp["type"])
        got = {n: actual(v) for n, v in o.field.items()}
        need(same(got, exp["vals"]), "object %s holds %s, expected %s", fq,
             got, exp["vals"])
        py = o.to_python_dict()
        want = {n: simple(m) for n, m in exp["vals"].items()}
        need(same(py, want), "object %s to_python_dict gives %s, expected %s",
             fq, py, want)
        if "section" in exp:
            sec = [s.name for s in o.section] if o.section else []
            need(sec == exp["section"], "object %s in sections %s, expected"
                 " %s", fq, sec, exp["section"])
