from __native__ import Decimal, InvalidOperation
DecimalException = ArithmeticError
ROUND_HALF_UP = 'ROUND_HALF_UP'
