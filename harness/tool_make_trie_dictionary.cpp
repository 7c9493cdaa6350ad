// the tool as it is, under another symbol name
int main(int, char **) asm("tool_make_trie_dictionary");
#include "main/make_trie_dictionary.cpp"
