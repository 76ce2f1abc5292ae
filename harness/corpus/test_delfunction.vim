delfunction F
delfunction! F
