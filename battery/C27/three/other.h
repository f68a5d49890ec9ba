int other = 4;
