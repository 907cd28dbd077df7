// end of an S-function: nothing to add
