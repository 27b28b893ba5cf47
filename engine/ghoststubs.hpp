// bodies used instead of the file-backed constructor of the stream (the ghost stream has no file)
extern "C" void stub_ctor( void *, const std::string &, uint16_t ) {}
