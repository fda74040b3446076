from .. import contracts

OPTS = {
    "FeaturePoint6d::computeErrordot": {"opaque": {"inverseJacobianRodrigues"}},
    # scratch matrix, written before every use
    "FeatureVisualPoint::computeJacobian": {"ignore": {"field L"}},
    "FeatureAbstract::computeErrorDot": {"opaque": {"isReferenceSet", "getReferenceAbstract"}},
    "FeaturePose<SE3Representation>::computeErrorDot": {"opaque": {"convertVelocity"}},
    "FeaturePose<R3xSO3Representation>::computeErrorDot": {"opaque": {"convertVelocity"}},
}


def run(c):
    c.rule("dimension, error, derivative of the error and Jacobian of every feature keep the same rows of the full "
           "quantities, in order, one per selected component (spec/p11.cpp)")
    contracts.run(c, ["p11"], opts=OPTS, floor=38)
