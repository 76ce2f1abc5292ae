function Foo()
endfunction
function s:foo()
endfunction
function <sid>foo()
endfunction
function <SID>foo()
endfunction
function foo{':'}bar()
endfunction
function foo()
endfunction
