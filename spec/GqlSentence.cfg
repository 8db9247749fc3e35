INIT SInit
NEXT SNext
VIEW SView
INVARIANTS SentenceReadsBack SentencePrintsToItself
CHECK_DEADLOCK FALSE
