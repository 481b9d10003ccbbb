class Number(object):
    __abc_name__ = 'Number'


class Complex(Number):
    __abc_name__ = 'Complex'


class Real(Complex):
    __abc_name__ = 'Real'


class Rational(Real):
    __abc_name__ = 'Rational'


class Integral(Rational):
    __abc_name__ = 'Integral'
