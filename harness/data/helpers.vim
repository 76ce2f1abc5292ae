" Evaluates the calls in a file of JSON, [[name, arg, ...], ...], with Vim and
" the reference's own functions, and writes their results.
set encoding=utf-8
call vimlparser#import()
let s:sid = filter(getscriptinfo(), 'v:val.name =~# "autoload/vimlparser\\.vim$"')[0].sid
function! s:eval(x) abort
  let [name; a] = a:x
  if name ==# 'viml_eqregh'
    return a[0] =~# a[1]
  elseif name ==# 'viml_eqregq'
    return a[0] =~? a[1]
  elseif name ==# 'viml_eqreg'
    return a[0] =~ a[1]
  elseif name ==# 'viml_equalci'
    return a[0] ==? a[1]
  elseif name ==# 'viml_range'
    return range(a[0], a[1])
  elseif name =~# '^viml_'
    return call(name[5:], a)
  elseif !exists('*<SNR>' .. s:sid .. '_' .. name)
    return 'no such function'
  endif
  return call('<SNR>' .. s:sid .. '_' .. name, a)
endfunction
function! VmonHelpers(in, out) abort
  let res = []
  for x in json_decode(join(readfile(a:in), "\n"))
    try
      call add(res, [s:eval(x)])
    catch
      call add(res, ['error', v:exception])
    endtry
  endfor
  call writefile([json_encode(res)], a:out)
endfunction
call VmonHelpers($VMON_IN, $VMON_OUT)
qall!
