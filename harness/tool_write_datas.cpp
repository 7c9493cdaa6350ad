// the tool as it is, under another symbol name
int main(int, char **) asm("tool_write_datas");
#include "main/write_datas.cpp"
