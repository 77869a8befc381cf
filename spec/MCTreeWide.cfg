SPECIFICATION Spec
CONSTANT Wide = TRUE
INVARIANTS Distribution InUnit Additive Implied CondInfers CondCond Bayes PosteriorIsInfer MergeMarginals TowerRule Survives ModesMaximal FirmlyNothing
CHECK_DEADLOCK FALSE
