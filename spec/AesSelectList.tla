--------------------------- MODULE AesSelectList ---------------------------
\* writes every configuration of AesSelect, with what it selects
EXTENDS AesSelect
Write == ndJsonSerialize(IOEnv.OUT, SetToSeq({Listed(c) : c \in Config}))
ASSUME Write
=============================================================================
