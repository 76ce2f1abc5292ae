aboveleft belowright botright browse confirm hide keepalt keepjumps
	      \ keepmarks keeppatterns lockmarks noswapfile silent tab
	      \ topleft verbose vertical call Func()
abo bel bo bro conf hid keepalt keepj
	      \ kee keepp loc nos sil tab
	      \ to verb vert call Func()
