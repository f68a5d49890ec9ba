int i;
i = 77;
return i;
