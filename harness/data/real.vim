" Sources the script $VMON_SRC and writes what it did to $VMON_OUT.
set nomore cpo&vim
for s:o in ['shada', 'viminfo']
  silent! execute 'set' s:o . '='
endfor
call setline(1, ['if a == b', '  "text" # c', 'end', ''])
let s:keep = {}
for s:k in keys(g:)
  let s:keep['g:' . s:k] = 1
endfor
let s:m0 = execute("map\nmap!\nabbreviate\ncommand\nautocmd")
let s:f0 = split(execute('function'), "\n")
let s:how = 'ok'
let s:msgs = ''
redir => s:msgs
try
  execute 'silent source' fnameescape($VMON_SRC)
catch
  let s:how = 'error ' . v:exception . ' ' . v:throwpoint
finally
  silent! redir END
endtry
function! s:vars(n, d) abort
  let r = []
  for k in sort(keys(a:d))
    if k !=# 'changedtick' && !has_key(s:keep, a:n . k)
      call add(r, [k, string(a:d[k])])
    endif
  endfor
  return r
endfunction
function! s:funs() abort
  let r = []
  for f in split(execute('function'), "\n")
    if index(s:f0, f) < 0 && f !~# '\<SNR>\d\+_\(vars\|funs\)('
      " a default argument may have got parentheses
      call add(r, substitute(f, ' = .*)', ')', ''))
    endif
  endfor
  return sort(r)
endfunction
let s:r = [s:how, s:msgs]
call add(s:r, [s:vars('g:', g:), s:vars('b:', b:), s:vars('w:', w:)])
call add(s:r, getline(1, '$'))
call add(s:r, split(execute("map\nmap!\nabbreviate\ncommand\nautocmd"), "\n"))
call add(s:r, split(execute("set all"), "\n"))
call add(s:r, split(execute("setlocal all"), "\n"))
call add(s:r, s:funs())
call add(s:r, split(execute("silent! syntax list"), "\n"))
call add(s:r, split(execute("silent! syntax sync"), "\n"))
call add(s:r, split(execute("highlight"), "\n"))
call add(s:r, split(execute("silent! menu"), "\n"))
call add(s:r, split(execute("silent! sign list"), "\n"))
enew!
setlocal ff=unix fenc= modifiable noreadonly noautoindent
call setline(1, json_encode(s:r))
noautocmd execute 'silent write!' fnameescape($VMON_OUT)
qall!
