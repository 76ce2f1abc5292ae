let x = y
      \
      \ z
