" test_lambda
echo {->1 + 1}
echo {i, v -> v >= s:x}
echo {...->a:000}
echo {x->x*2}(14)
