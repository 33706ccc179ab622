import mirsrv
print(mirsrv.build())
