call foo(a, b,)
call bar(c, d, )
