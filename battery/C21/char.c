unsigned char main() { return 515; }
