echo foo.bar
echo foo.bar.baz
echo "foo"."bar"
echo foo."bar"
echo "foo".bar
echo foo.bar()
echo foo.s:bar
echo foo.123
echo foo.123abc
