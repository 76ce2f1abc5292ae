" Runs the reference parser on the scripts in a file of JSON:
" [[lines, neovim], ...] and writes [[ok, lines or message], ...].
set encoding=utf-8
function! VmonRef(in, out) abort
  let cases = json_decode(join(readfile(a:in), "\n"))
  let vp = vimlparser#import()
  let res = []
  for [lines, neovim] in cases
    try
      let c = vp.Compiler.new()
      call add(res, ['ok', c.compile(vp.VimLParser.new(neovim).parse(vp.StringReader.new(lines)))])
    catch
      call add(res, ['error', v:exception . "\n" . v:throwpoint])
    endtry
  endfor
  call writefile([json_encode(res)], a:out)
endfunction
call VmonRef($VMON_IN, $VMON_OUT)
qall!
