/* cross-target analysis: nothing is linked */
