echo 0z0
echo 0z0X
echo 0zAABBC
echo 0zAAB.BCC
