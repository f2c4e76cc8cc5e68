SPECIFICATION PureSpec
CONSTANT TextOf <- PureTextOf
INVARIANT PureOk
CHECK_DEADLOCK FALSE
VIEW PureView
