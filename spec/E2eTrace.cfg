SPECIFICATION TSpec
