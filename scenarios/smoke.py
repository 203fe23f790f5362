import unidist
from harness import scenario, expect_eq, expect
from simrt import obs, pt

@unidist.remote
def add(a, b):
    obs("run", "add", a, b)
    return a + b

@scenario()
def smoke1():
    x = add.remote(1, 2)
    y = add.remote(x, 3)
    expect_eq(unidist.get([x, y]), [3, 6])

def main():
    pass

@scenario()
def smoke0():
    pass
