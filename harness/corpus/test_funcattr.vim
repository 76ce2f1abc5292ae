function! F() abort
endfunction

function! F() dict abort range closure
endfunction
