int main(int argc, char** argv) { return pbt::main(argc,argv); }
