function Foo(abc=1, xyz)
endfunction
