" test_emptylc
echo 
      \
      \1
