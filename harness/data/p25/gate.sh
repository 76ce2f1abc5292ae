#!/bin/bash
# p25_gate.sh REPO: writes the file of package go that gives the check of
# P25 the helpers which are there.
echo "package vimlparser"
echo
echo "// VmonHelpers is in the build of the check of P25 only."
echo "var VmonHelpers = map[string]interface{}{"
for f in viml_eqreg viml_eqregh viml_eqregq viml_equalci viml_escape viml_join viml_split viml_str2nr viml_stridx viml_range \
	isalpha isalnum isdigit isodigit isxdigit iswordc iswordc1 iswhite isnamec isnamec1 isargname isvarname isidc isupper islower; do
	if grep -qs "^func $f(" "$1"/go/*.go; then printf '\t"%s": %s,\n' $f $f; fi
done
echo "}"
