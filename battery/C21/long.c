long main() { long a; a = 4294967296 * 3 + 25; return a; }
