from .bframe import gen, judge as _j


def judge(case):
    return [f for f in _j(case) if f.kind == "generalized"]
