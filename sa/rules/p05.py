"""P05: unknown names and invalid requests."""
from .. import contracts

# functions of the other specifications that answer a look-up or may refuse a request
ALSO = {
    "p03": ("VariadicAbstract",),
    "p06": ("Stopwatch",),
    "p09": ("Sot::push", "Sot::pop", "Sot::remove", "Sot::exist", "Sot::up", "Sot::down", "Sot::defineNbDof"),
    "p12": ("Flags::Flags", "operator>>"),
    "p13": ("MultiBound", "operator>>"),
    "p15": ("IntegratorEuler", "IntegratorAbstract"),
    "p16": ("GripperControlPlugin", "Switch"),
    "p24": ("VectorMix", "VectorSelecter", "MatrixSelector", "ConvolutionTemporal", "VariadicAbstract"),
}


def run(c):
    c.rule("a look-up returns the element that was registered or throws; a request that cannot be honoured throws and leaves every field as it was (spec/p05.cpp and the refusing operations of the other specifications)")
    keep = {"*": {"keepstate": True}}
    contracts.run(c, ["p05"], opts=keep, floor=21)
    for spec, names in ALSO.items():
        contracts.run(c, [spec], only=lambda pr: any(x in pr.key for x in names), opts=keep, floor=1)
