echo is
echo is#
echo isnot
echo isnot#
echo foo.is
echo foo.isnot
