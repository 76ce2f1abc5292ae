function Foo(firstline)
endfunction
