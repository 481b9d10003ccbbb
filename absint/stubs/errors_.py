from __native__ import error, JSONDecodeError, ParseError
