module.exports = require('./stub.js').token;
