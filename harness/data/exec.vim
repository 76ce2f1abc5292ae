" Runs programs in pairs and writes what each did.
" Usage: vim -u NONE -Z -es -S exec.vim, with the cases in $VMON_IN as JSON:
" ['e', text, text]: expressions; ['s', file, file]: scripts.
set encoding=utf-8 cpo&vim
let s:alldefs = {}

function! VmonDefs() abort
  let g:T = []
  let g:n = 3
  let g:n1 = 7
  let g:n2 = -2
  let g:fl = 1.5
  let g:e = ''
  let g:s = 'abc'
  let g:s1 = 'x y'
  let g:S2 = 'Ab"c'
  let g:l = [1, 2, 3, 4]
  let g:ll = [[1, 'a'], [2, 'b'], [3, 'c']]
  let g:is = [5, 6]
  let g:d = {'a': 1, 'b': 'two', 'k': [1, 2, 3], 'in': {'x': 9, 's': 'deep'}}
  let g:d.f = function('Id')
  let g:obj = {'v': 5, 'Get': function('VmonGet'), 'Self': function('VmonSelf')}
  let g:F = function('Id')
  let g:F2 = function('Add')
  let g:vmon#x = 11
  let $VMON_X = 'env'
  call setreg('a', 'reg')
  call setreg('b', "line\n")
  call setreg('c', '')
  call setreg('"', 'unn')
  call setreg('/', 'pat')
endfunction
function! Id(x) abort
  return a:x
endfunction
function! Add(a, b) abort
  return a:a + a:b
endfunction
function! Cat(...) abort
  return join(map(copy(a:000), 'string(v:val)'), '~')
endfunction
function! T(...) abort
  call add(g:T, string(a:000))
  return a:0 ? a:1 : 0
endfunction
function! Tr(...) range abort
  call add(g:T, string([a:firstline, a:lastline, a:000]))
endfunction
function! VmonGet(...) dict abort
  return self.v + a:0
endfunction
function! VmonSelf() dict abort
  return self
endfunction

let s:keep = {}
function! s:functions() abort
  return filter(map(split(execute('function'), "\n"), 'matchstr(v:val, "^function \\zs[^(]*")'), 'v:val !=# ""')
endfunction

let s:fixed = {}
let s:opts = ['ts', 'sw', 'et', 'tw', 'ic', 'sts', 'ai', 'ff', 'fo', 'lines']
function! s:reset() abort
  call setreg('z', '')
  silent! sign undefine VmonS
  silent! tabonly!
  silent! only!
  enew!
  setlocal bufhidden=wipe
  let &undolevels = -1
  for o in ['ts', 'sw', 'et', 'tw', 'ic', 'sts', 'ai', 'fo', 'cpo', 'magic', 'gdefault']
    execute 'set' o . '&vim'
  endfor
  mapclear
  mapclear!
  abclear
  comclear
  silent! autocmd! VmonG
  silent! delmarks!
  delmarks a-z
  for [n, d] in [['g', g:], ['b', b:], ['w', w:], ['t', t:]]
    for k in keys(d)
      if k =~# '^[A-Za-z_][A-Za-z0-9_#]*$' && k !=# 'changedtick' && !has_key(s:fixed, k)
        execute 'unlockvar 1' n . ':' . k
        execute 'unlet!' n . ':' . k
      endif
    endfor
  endfor
  for f in s:functions()
    if !has_key(s:keep, f)
      execute 'silent! delfunction!' substitute(f, '^<SNR>', "\<SNR>", '')
    endif
  endfor
  let v:errmsg = ''
  let v:statusmsg = ''
  call setline(1, ['alpha beta', 'b|c d', 'foo(1) bar', 'x,y;z', '  indent', 'abc', 'last line'])
  silent! s/nothing here/zz/e
  call cursor(1, 1)
  call VmonDefs()
endfunction

function! s:vars(d) abort
  let r = []
  for k in sort(keys(a:d))
    if k !=# 'changedtick' && !has_key(s:fixed, k)
      let s:value = a:d[k]
      call add(r, [k, string(s:value), islocked('a:d[k]')])
    endif
  endfor
  return r
endfunction

function! s:state() abort
  let r = [s:vars(g:), s:vars(b:), s:vars(w:), s:vars(t:)]
  call add(r, getline(1, '$'))
  call add(r, getpos('.') + [winnr('$'), winnr(), tabpagenr('$'), mode()])
  call add(r, map(split('a b c d " - / z', ' '), 'getreg(v:val)'))
  call add(r, map(copy(s:opts), 'string(eval("&" . v:val))'))
  call add(r, execute("map\nmap!\nabbreviate\ncommand"))
  call add(r, execute('silent! autocmd VmonG'))
  call add(r, sort(map(s:functions(), 'substitute(v:val, "^<SNR>\\d*_", "s:", "")')))
  " what the functions defined are: abort, range and the like
  call add(r, sort(map(filter(s:functions(), '!has_key(s:keep, v:val)'), 'substitute(v:val, "^<SNR>\\d*_", "s:", "") . matchstr(split(execute("function " . v:val), "\n")[0], "\\v\\)\\zs[^)]*$")')))
  call add(r, map(split('a b c', '\zs'), 'getpos("''" . v:val)'))
  call add(r, $VMON_X)
  call add(r, v:errmsg)
  return r
endfunction

function! s:eval(arg, ...) abort
  let loc = 21
  return string(eval(s:text))
endfunction

function! s:expr(text) abort
  call s:reset()
  try
    let s:text = a:text
    let r = ['ok', s:eval('arg', 'more'), string(g:T)]
  catch
    let r = ['error', v:exception, string(g:T)]
  endtry
  return r
endfunction

function! s:script(file) abort
  call s:reset()
  let how = 'ok'
  let s:msgs = ''
  redir => s:msgs
  try
    execute 'silent source' a:file
  catch
    let how = 'error ' . v:exception
  finally
    silent! redir END
  endtry
  return [how, s:msgs, s:state()]
endfunction

function! s:flush() abort
  if s:out != []
    silent! only!
    enew!
    setlocal bufhidden=wipe ff=unix
    call setline(1, s:out)
    execute 'silent write! >>' $VMON_OUT
    let s:out = []
  endif
endfunction

function! VmonExec() abort
  let s:out = []
  augroup VmonG
  augroup END
  for f in s:functions()
    let s:keep[f] = 1
  endfor
  for k in keys(g:)
    let s:fixed[k] = 1
  endfor
  for [kind, a, b] in json_decode(join(readfile($VMON_IN), "\n"))
    if kind ==# 'e'
      call add(s:out, json_encode([s:expr(a), b ==# '' ? [] : s:expr(b)]))
    else
      call add(s:out, json_encode([s:script(a), b ==# '' ? [] : s:script(b)]))
    endif
    if len(s:out) >= $VMON_STEP
      call s:flush()
    endif
  endfor
  call s:flush()
endfunction
call VmonExec()
qall!
