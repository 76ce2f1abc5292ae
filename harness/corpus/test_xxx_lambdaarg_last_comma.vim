echo {a,->0}
echo {a, ->0}
