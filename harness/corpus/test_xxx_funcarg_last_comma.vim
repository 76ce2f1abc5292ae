function F(a,)
endfunction
function G(a, )
endfunction
