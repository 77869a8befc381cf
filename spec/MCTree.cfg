SPECIFICATION Spec
CONSTANT Wide = FALSE
INVARIANTS Distribution InUnit Additive Implied CondInfers CondCond Bayes PosteriorIsInfer MergeMarginals TowerRule Survives ModesMaximal FirmlyNothing
CHECK_DEADLOCK FALSE
