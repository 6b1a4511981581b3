/*
 * BasedOnStyle: LLVM
 * BasedOnStyle: Google
 * BasedOnStyle: Chromium
 * BasedOnStyle: Mozilla
 * BasedOnStyle: WebKit
 * BasedOnStyle: Microsoft
 * BasedOnStyle: GNU
 * BasedOnStyle: InheritParentConfig
 */
