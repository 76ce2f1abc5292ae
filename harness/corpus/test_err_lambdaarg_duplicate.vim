echo {a, b, b, c ->1}
