INIT Init
NEXT DNext
