function Foo(lastline)
endfunction
