let x = y
      \ z
